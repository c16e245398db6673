CONSTANT Scenarios <- C14S
