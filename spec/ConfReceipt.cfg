SPECIFICATION Spec
VIEW ConfView
CHECK_DEADLOCK FALSE
