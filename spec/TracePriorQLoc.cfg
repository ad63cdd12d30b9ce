SPECIFICATION Spec
CONSTANT Locators = TRUE
CHECK_DEADLOCK TRUE
