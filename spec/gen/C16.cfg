CONSTANT Scenarios <- C16S
