// Drives the C++ owning wrappers.  An object is "held" while its memory is.
#include "common.h"
#include "bytearray.h"
#include "charstr.h"
#include <map>
#include <set>
#include <utility>

using namespace fsecure::fsdyn;

static ByteArrayPtr b_[4] = { make_byte_array_ptr(nullptr), make_byte_array_ptr(nullptr),
                              make_byte_array_ptr(nullptr), make_byte_array_ptr(nullptr) };
static AllocPtr<char> p_[4] = { make_fsalloc_ptr<char>(nullptr), make_fsalloc_ptr<char>(nullptr),
                                make_fsalloc_ptr<char>(nullptr), make_fsalloc_ptr<char>(nullptr) };
static CharstrUrlEncoderPtr u_[4] = {
    make_charstr_url_encoder_ptr(nullptr), make_charstr_url_encoder_ptr(nullptr),
    make_charstr_url_encoder_ptr(nullptr), make_charstr_url_encoder_ptr(nullptr) };
static std::map<void *, int> ids_;
static int made_;

static void held()
{
    out(",\"held\":[");
    bool first = true;
    for (auto it = ids_.begin(); it != ids_.end();) {
        if (*blk_find(it->first)) {
            out(first ? "%d" : ",%d", it->second);
            first = false;
            ++it;
        } else
            it = ids_.erase(it);
    }
    out("]");
    ev_end();
}

// a recycled address would confuse the bookkeeping: never reuse memory
static void *leaky_realloc(void *ptr, size_t size)
{
    if (size == 0 && ptr) {
        blk_t **q = blk_find(ptr);
        if (!*q)
            abort();
        blk_t *b = *q;
        *q = b->next;
        memset(ptr, 0xdd, b->size);
        free(b);
        blocks_live_--;
        return NULL;
    }
    return tracking_realloc(ptr, size);
}

template <class P> static void drive(P *w, char kind)
{
    const char *op = tok();
    int a = num();
    auto fresh = [&]() -> void * {
        void *o = kind == 'B' ? (void *) make_byte_array(50) :
            kind == 'U' ? (void *) charstr_create_url_encoder("a", "?") :
            fsalloc(7);
        ids_[o] = ++made_;
        return o;
    };
    auto wrap = [&](void *o) -> P {
        if constexpr (std::is_same<P, ByteArrayPtr>::value)
            return make_byte_array_ptr((byte_array_t *) o);
        else if constexpr (std::is_same<P, CharstrUrlEncoderPtr>::value)
            return make_charstr_url_encoder_ptr((charstr_url_encoder_t *) o);
        else
            return make_fsalloc_ptr<char>(o);
    };
    auto id = [&](void *o) { return o && ids_.count(o) ? ids_[o] : 0; };
    if (!strcmp(op, "make")) {
        w[a] = wrap(fresh());
        out("{\"op\":\"omake\",\"w\":%d,\"o\":%d", a, made_);
        held();
    } else if (!strcmp(op, "null")) {
        w[a] = wrap(nullptr);
        out("{\"op\":\"oreset\",\"w\":%d", a);
        held();
    } else if (!strcmp(op, "reset")) {
        w[a].reset();
        out("{\"op\":\"oreset\",\"w\":%d", a);
        held();
    } else if (!strcmp(op, "move")) {
        int b = num();
        if (a != b)
            w[a] = std::move(w[b]);
        out("{\"op\":\"omove\",\"w\":%d,\"v\":%d", a, b);
        held();
    } else if (!strcmp(op, "swap")) {
        int b = num();
        if (a != b)
            std::swap(w[a], w[b]);
        out("{\"op\":\"oswap\",\"w\":%d,\"v\":%d", a, b);
        held();
    } else if (!strcmp(op, "release")) {
        void *o = w[a].release();
        int n = id(o);
        out("{\"op\":\"orelease\",\"w\":%d,\"o\":%d", a, n);
        held();
        if (o) {
            if (kind == 'B')
                destroy_byte_array((byte_array_t *) o);
            else if (kind == 'U')
                charstr_destroy_url_encoder((charstr_url_encoder_t *) o);
            else
                fsfree(o);
            out("{\"op\":\"ofree\",\"o\":%d", n);
            held();
        }
    } else if (!strcmp(op, "share")) {
        int b = num();
        if (a != b && w[b]) {
            if constexpr (std::is_same<P, ByteArrayPtr>::value)
                w[a] = make_byte_array_ptr(share_byte_array(w[b].get()));
            out("{\"op\":\"oshare\",\"w\":%d,\"v\":%d", a, b);
            held();
        }
    } else if (!strcmp(op, "scope")) {
        {
            P local = std::move(w[a]);
            out("{\"op\":\"oswap\",\"w\":%d,\"v\":%d", a, a);
            held();
        }
        out("{\"op\":\"oreset\",\"w\":%d", a);
        held();
    } else
        bad_script(op);
}

int main(int argc, char **argv)
{
    start(argc, argv);
    fs_set_reallocator(leaky_realloc);
    while (next_line()) {
        if (!more())
            continue;
        char *what = tok();
        if (!strcmp(what, "case")) {
            for (int i = 0; i < 4; i++) {
                b_[i].reset();
                p_[i].reset();
                u_[i].reset();
            }
            ids_.clear();
            made_ = 0;
            case_begins();
        } else if (*what == 'B')
            drive(b_, 'B');
        else if (*what == 'P')
            drive(p_, 'P');
        else if (*what == 'U')
            drive(u_, 'U');
        else
            bad_script(what);
    }
    for (int i = 0; i < 4; i++) {
        b_[i].reset();
        p_[i].reset();
        u_[i].reset();
    }
    fclose(logf_);
    return 0;
}
