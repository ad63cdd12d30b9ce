/* Runs several drivers at the same time, each in a thread of its own with its
 * own script and log:
 *
 *     threads LOG THREADS < script
 *
 * The script starts with lines "turn THREAD BLOCKS" (the schedule), followed by
 * "script THREAD" sections; thread THREAD runs driver_<THREAD>() and logs to
 * LOG.<THREAD>.
 *
 * One thread at a time has the turn.  The library is compiled with
 * -fsanitize-coverage=trace-pc: at each of its basic blocks the turn may pass
 * to another thread, as the schedule says.  All threads begin a case together.
 */
#define VERIF_SCHEDULER
#include <pthread.h>
#include <semaphore.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#define VERIF_THREADS
#include "common.h"

#define MAXTHREADS 4
_Thread_local FILE *script_;
_Thread_local blk_t *blocks_[NBUCKETS];
_Thread_local long blocks_live_;
_Thread_local long blocks_total_;
_Thread_local long realloc_calls_;

int driver_0(int argc, char **argv);
int driver_1(int argc, char **argv);
int driver_2(int argc, char **argv);
static int (*drivers_[])(int, char **) = { driver_0, driver_1, driver_2 };

typedef struct {
    pthread_t thread;
    sem_t turn;
    char *script;
    size_t size;
    char log[4096];
    bool finished;
    long cases;                 /* begun */
} worker_t;
static worker_t workers_[MAXTHREADS];
static int nworkers_;
static struct { int thread; int blocks; } *schedule_;
static long nschedule_, at_;
static int whose_;
static long left_;              /* basic blocks until the turn passes */
static long switches_, before_; /* before the case */
static _Thread_local int self_ = -1;

static bool may_run(int i)
{
    worker_t *w = &workers_[i];
    if (w->finished)
        return false;
    for (int j = 0; j < nworkers_; j++)
        if (!workers_[j].finished && workers_[j].cases < w->cases)
            return false;
    return true;
}

/* The turn passes to the next in the schedule that can use it. */
static void pass(void)
{
    int me = self_, next = -1;
    for (int tries = 0; next < 0 && tries < 64; tries++) {
        int t = schedule_[at_].thread;
        /* in a long case ever fewer turns */
        long longer = (switches_ - before_) / 2000;
        left_ = (long) schedule_[at_].blocks << (longer < 20 ? longer : 20);
        at_ = (at_ + 1) % nschedule_;
        if (may_run(t))
            next = t;
    }
    for (int i = 0; next < 0 && i < nworkers_; i++)
        if (may_run(i))
            next = i;
    if (next < 0 || next == me)
        return;                 /* all have finished, or go on */
    switches_++;
    whose_ = next;
    sem_post(&workers_[next].turn);
    if (!workers_[me].finished)
        while (sem_wait(&workers_[me].turn))
            ;
}

void __sanitizer_cov_trace_pc(void)
{
    if (self_ >= 0 && --left_ <= 0)
        pass();
}

void barrier_(void)
{
    workers_[self_].cases++;
    before_ = switches_;
    do
        pass();
    while (!may_run(self_));
}

static void *work(void *arg)
{
    worker_t *w = arg;
    int me = w - workers_;
    while (sem_wait(&w->turn))
        ;
    script_ = fmemopen(w->script, w->size, "r");
    char *argv[] = { "driver", w->log, NULL };
    self_ = me;
    drivers_[me](2, argv);
    w->finished = true;
    pass();
    self_ = -1;
    return NULL;
}

int main(int argc, char **argv)
{
    nworkers_ = atoi(argv[2]);
    char *line = NULL;
    size_t cap = 0;
    long room = 0;
    FILE *to = NULL;
    ssize_t n;
    while ((n = getline(&line, &cap, stdin)) > 0) {
        int t, b;
        if (sscanf(line, "turn %d %d", &t, &b) == 2) {
            if (nschedule_ == room) {
                room = 2 * room + 1024;
                schedule_ = realloc(schedule_, room * sizeof *schedule_);
            }
            schedule_[nschedule_].thread = t;
            schedule_[nschedule_++].blocks = b;
        } else if (sscanf(line, "script %d", &t) == 1) {
            if (to)
                fclose(to);
            to = open_memstream(&workers_[t].script, &workers_[t].size);
        } else if (to)
            fwrite(line, 1, n, to);
        else return 99;
    }
    if (to)
        fclose(to);
    free(line);
    if (!nschedule_)
        return 99;
    pthread_attr_t attr;
    pthread_attr_init(&attr);
    pthread_attr_setstacksize(&attr, 64 << 20);
    for (int i = 0; i < nworkers_; i++) {
        worker_t *w = &workers_[i];
        if (!w->script)
            return 99;
        snprintf(w->log, sizeof w->log, "%s.%d", argv[1], i);
        sem_init(&w->turn, 0, 0);
        if (pthread_create(&w->thread, &attr, work, w))
            return 99;
    }
    sem_post(&workers_[schedule_[0].thread].turn);
    left_ = schedule_[0].blocks;
    for (int i = 0; i < nworkers_; i++)
        pthread_join(workers_[i].thread, NULL);
    FILE *f = fopen(argv[1], "w");
    fprintf(f, "%ld\n", switches_);
    fclose(f);
    return 0;
}
