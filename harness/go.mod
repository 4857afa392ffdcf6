module vharness

require (
	github.com/Velocidex/ordereddict v0.0.0-20250821063524-02dc06e46238
	github.com/alecthomas/assert/v2 v2.11.0
	github.com/alecthomas/participle/v2 v2.1.4
	github.com/alecthomas/repr v0.5.4
	github.com/google/go-cmp v0.6.0
	github.com/pkg/errors v0.9.1
	github.com/sebdah/goldie/v2 v2.5.3
	github.com/stretchr/testify v1.8.1
	golang.org/x/text v0.37.0
)

require (
	github.com/Velocidex/json v0.0.0-20220224052537-92f3c0326e5a // indirect
	github.com/Velocidex/yaml/v2 v2.2.8 // indirect
	github.com/davecgh/go-spew v1.1.1 // indirect
	github.com/hexops/gotextdiff v1.0.3 // indirect
	github.com/kr/pretty v0.3.1 // indirect
	github.com/pmezard/go-difflib v1.0.0 // indirect
	github.com/sergi/go-diff v1.2.0 // indirect
	gopkg.in/check.v1 v1.0.0-20201130134442-10cb98267c6c // indirect
	gopkg.in/yaml.v3 v3.0.1 // indirect
)

// replace github.com/Velocidex/ordereddict => /home/mic/projects/ordereddict

go 1.25.0

require www.velocidex.com/golang/vfilter v0.0.0-00010101000000-000000000000

replace www.velocidex.com/golang/vfilter => /repo
