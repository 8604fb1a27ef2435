module verif45

require (
	github.com/yaacov/tree-search-language/v4 v4.0.0
	cloud.google.com/go v0.39.0 // indirect
	github.com/Masterminds/squirrel v1.1.0
	github.com/antlr/antlr4 v0.0.0-20190518164840-edae2a1c9b4b
	github.com/denisenkom/go-mssqldb v0.0.0-20190515213511-eb9f6a1743f3 // indirect
	github.com/fatih/color v1.7.0 // indirect
	github.com/golang/protobuf v1.3.2 // indirect
	github.com/graphql-go/graphql v0.7.8
	github.com/hokaccha/go-prettyjson v0.0.0-20180920040306-f579f869bbfe
	github.com/jinzhu/gorm v1.9.8
	github.com/lib/pq v1.2.0 // indirect
	github.com/mattn/go-colorable v0.1.2 // indirect
	github.com/mattn/go-isatty v0.0.9 // indirect
	github.com/mattn/go-sqlite3 v1.10.0
	github.com/onsi/ginkgo v1.10.1
	github.com/onsi/gomega v1.7.0
	go.mongodb.org/mongo-driver v1.5.1
	golang.org/x/net v0.7.0 // indirect
	gopkg.in/check.v1 v1.0.0-20190902080502-41f04d3bba15 // indirect
	gopkg.in/yaml.v2 v2.2.8
)

go 1.14

replace github.com/yaacov/tree-search-language/v4 => /repo/v4
