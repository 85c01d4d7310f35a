module verifharness

go 1.26.0

require (
	github.com/anishathalye/porcupine v1.3.1
	github.com/unsafe-risk/utilx v0.0.0
	golang.org/x/crypto v0.4.0
)

replace github.com/unsafe-risk/utilx => /repo
