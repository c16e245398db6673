CONSTANT Scenarios <- C18S
