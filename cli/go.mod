module github.com/acronis/go-raml/cmd/raml

go 1.22.6

require (
	github.com/acronis/go-raml/v2 v2.0.0
	github.com/acronis/go-stacktrace v0.4.0
	github.com/acronis/go-stacktrace/slogex v0.3.0
	github.com/dusted-go/logging v1.3.0
	github.com/samber/slog-formatter v1.1.0
	github.com/spf13/cobra v1.8.1
)

require (
	github.com/antlr4-go/antlr/v4 v4.13.0 // indirect
	github.com/bahlo/generic-list-go v0.2.0 // indirect
	github.com/buger/jsonparser v1.1.1 // indirect
	github.com/klauspost/cpuid/v2 v2.2.5 // indirect
	github.com/mailru/easyjson v0.7.7 // indirect
	github.com/samber/lo v1.44.0 // indirect
	github.com/samber/slog-multi v1.1.0 // indirect
	github.com/spf13/pflag v1.0.5 // indirect
	github.com/wk8/go-ordered-map/v2 v2.1.8 // indirect
	github.com/zeebo/xxh3 v1.0.2 // indirect
	golang.org/x/exp v0.0.0-20230515195305-f3d0a9c9a5cc // indirect
	golang.org/x/text v0.16.0 // indirect
	gopkg.in/yaml.v3 v3.0.1 // indirect
)

replace github.com/acronis/go-raml/v2 => /repo
