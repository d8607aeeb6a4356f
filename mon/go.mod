module verifmon

go 1.24

require (
	github.com/anishathalye/porcupine v1.3.1
	github.com/cybozu-go/aptutil v0.0.0
	github.com/cybozu-go/log v1.5.0
	github.com/ulikunitz/xz v0.5.10
)

require (
	github.com/cybozu-go/netutil v1.2.0 // indirect
	github.com/cybozu-go/well v1.10.0 // indirect
	github.com/fsnotify/fsnotify v1.4.7 // indirect
	github.com/hashicorp/hcl v1.0.0 // indirect
	github.com/magiconair/properties v1.8.0 // indirect
	github.com/mitchellh/mapstructure v1.1.2 // indirect
	github.com/pelletier/go-toml v1.2.0 // indirect
	github.com/pkg/errors v0.8.0 // indirect
	github.com/spf13/afero v1.1.2 // indirect
	github.com/spf13/cast v1.3.0 // indirect
	github.com/spf13/jwalterweatherman v1.0.0 // indirect
	github.com/spf13/pflag v1.0.5 // indirect
	github.com/spf13/viper v1.3.2 // indirect
	golang.org/x/net v0.0.0-20190921015927-1a5e07d1ff72 // indirect
	golang.org/x/sys v0.0.0-20190215142949-d0b11bdaac8a // indirect
	golang.org/x/text v0.3.0 // indirect
	gopkg.in/yaml.v2 v2.2.2 // indirect
)

replace github.com/cybozu-go/aptutil => /repo
