module verif/checker

go 1.24.0

require golang.org/x/tools v0.31.0

require (
	golang.org/x/mod v0.24.0 // indirect
	golang.org/x/sync v0.12.0 // indirect
)
