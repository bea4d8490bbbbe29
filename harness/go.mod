module verif/harness

go 1.26

require (
	github.com/anishathalye/porcupine v1.3.1
	github.com/go-stomp/stomp/v3 v3.0.0
)

replace github.com/go-stomp/stomp/v3 => /repo
