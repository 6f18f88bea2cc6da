module gosbverif

go 1.26.0

require (
	github.com/anishathalye/porcupine v1.3.1
	github.com/miniLCT/gosb v0.0.0
)

replace github.com/miniLCT/gosb => /repo
