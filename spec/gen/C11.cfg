CONSTANT Scenarios <- C11S
