module gpgpmc

go 1.21

require (
	github.com/spiegel-im-spiegel/fetch v0.2.3
	github.com/spiegel-im-spiegel/gocli v0.10.4
	github.com/spiegel-im-spiegel/gpgpdump v0.0.0
	golang.org/x/crypto v0.0.0-20210220033148-5ea612d1eb83
)

require (
	github.com/atotto/clipboard v0.1.2 // indirect
	github.com/inconshreveable/mousetrap v1.0.0 // indirect
	github.com/spf13/cobra v1.1.3 // indirect
	github.com/spf13/pflag v1.0.5 // indirect
	github.com/spiegel-im-spiegel/errs v1.0.2 // indirect
)

replace github.com/spiegel-im-spiegel/gpgpdump => /repo
