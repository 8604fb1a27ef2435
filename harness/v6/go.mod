module verif6

go 1.22.0

require (
	github.com/Masterminds/squirrel v1.5.4
	github.com/mattn/go-sqlite3 v1.14.0
	github.com/yaacov/tree-search-language/v6 v6.0.0
	gopkg.in/yaml.v3 v3.0.1
)

require (
	github.com/lann/builder v0.0.0-20180802200727-47ae307949d0 // indirect
	github.com/lann/ps v0.0.0-20150810152359-62de8c46ede0 // indirect
)

replace github.com/yaacov/tree-search-language/v6 => /repo/v6
