module verif/harness

go 1.18

require github.com/boynton/sadl v0.0.0

require (
	github.com/boynton/data v0.0.1
	github.com/boynton/scanner v1.0.0
	github.com/boynton/smithy v0.4.8
	github.com/ghodss/yaml v1.0.0
	github.com/gorilla/handlers v1.5.1
	github.com/gorilla/mux v1.8.0
	github.com/graphql-go/graphql v0.8.0
	gopkg.in/yaml.v2 v2.4.0
)

replace github.com/boynton/sadl => /repo

replace github.com/boynton/scanner => ../standin/scanner

replace github.com/boynton/smithy => ../standin/smithy

replace github.com/gorilla/mux => ../standin/mux

replace github.com/gorilla/handlers => ../standin/handlers
