module verif

go 1.26

require (
	pgregory.net/rapid v1.3.0
	ustack v0.0.0
)

replace ustack => /repo
