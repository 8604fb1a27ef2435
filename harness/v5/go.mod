module verif45

require (
	github.com/yaacov/tree-search-language/v5 v5.0.0
	github.com/Masterminds/squirrel v1.4.0
	github.com/antlr/antlr4 v0.0.0-20200712162734-eb1adaa8a7a6
	github.com/fatih/color v1.9.0 // indirect
	github.com/graphql-go/graphql v0.7.9
	github.com/hokaccha/go-prettyjson v0.0.0-20190818114111-108c894c2c0e
	github.com/jinzhu/gorm v1.9.15
	github.com/mattn/go-colorable v0.1.7 // indirect
	github.com/mattn/go-sqlite3 v1.14.0
	github.com/onsi/ginkgo v1.14.0
	github.com/onsi/gomega v1.10.1
	go.mongodb.org/mongo-driver v1.5.1
	golang.org/x/net v0.7.0 // indirect
	gopkg.in/yaml.v2 v2.3.0
)

go 1.14

replace github.com/yaacov/tree-search-language/v5 => /repo/v5
