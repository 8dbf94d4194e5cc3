module simgodis

go 1.27

require github.com/anishathalye/porcupine v1.3.1

require golang.org/x/sys v0.0.0-20211204120058-94396e421777

replace golang.org/x/sys => ./simsys
