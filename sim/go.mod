module verif/sim

go 1.22.3

require (
	github.com/anishathalye/porcupine v1.3.1
	github.com/williamflynt/topolith v0.0.0
)

require github.com/deckarep/golang-set/v2 v2.6.0 // indirect

replace github.com/williamflynt/topolith => /repo
