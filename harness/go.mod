module vt

go 1.26.0

require (
	github.com/antzucaro/matchr v0.0.0-20221106193745-7bed6ef61ef9
	github.com/mescanne/goledger v0.0.0
	github.com/spf13/cobra v1.6.1
	go.starlark.net v0.0.0-20221205180719-3fd0dac74452
	pgregory.net/rapid v1.3.0
)

require (
	github.com/cpuguy83/go-md2man/v2 v2.0.2 // indirect
	github.com/russross/blackfriday/v2 v2.1.0 // indirect
	github.com/spf13/pflag v1.0.5 // indirect
	golang.org/x/net v0.4.0 // indirect
	golang.org/x/oauth2 v0.3.0 // indirect
	golang.org/x/sys v0.3.0 // indirect
	golang.org/x/term v0.3.0 // indirect
	golang.org/x/text v0.5.0 // indirect
	gopkg.in/yaml.v3 v3.0.1 // indirect
)

replace github.com/mescanne/goledger => /repo
