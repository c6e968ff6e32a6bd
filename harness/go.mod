module verif

go 1.26.0

require (
	github.com/anishathalye/porcupine v1.3.1
	github.com/dpeckett/archivefs v0.0.0
	pgregory.net/rapid v1.3.0
)

replace github.com/dpeckett/archivefs => /repo
