module vsim

go 1.27

require github.com/anishathalye/porcupine v1.3.1
