module verif/mc

go 1.24

require (
	github.com/akito0107/xsqlparser v0.0.0
	github.com/google/go-cmp v0.3.1
	github.com/k0kubun/pp v3.0.1+incompatible
)

require (
	github.com/mattn/go-colorable v0.1.2 // indirect
	github.com/mattn/go-isatty v0.0.9 // indirect
	golang.org/x/sys v0.0.0-20190813064441-fde4db37ae7a // indirect
	golang.org/x/xerrors v0.0.0-20190717185122-a985d3407aa7 // indirect
)

replace github.com/akito0107/xsqlparser => /repo
