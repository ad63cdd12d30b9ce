SPECIFICATION Spec
CONSTANT Locators = FALSE
CHECK_DEADLOCK TRUE
