package tealsarif

// Main is the program.
func Main() { main() }
