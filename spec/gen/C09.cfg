CONSTANT Scenarios <- C09S
