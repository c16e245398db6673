CONSTANT Scenarios <- C06S
