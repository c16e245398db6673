CONSTANT Scenarios <- C01S
