module verif/engine

go 1.26.0

require (
	golang.org/x/crypto v0.0.0-20210711020723-a769d52b0f97
	golang.org/x/tools v0.52.0
)

require (
	golang.org/x/mod v0.42.0 // indirect
	golang.org/x/sync v0.24.0 // indirect
	golang.org/x/sys v0.49.0 // indirect
)
