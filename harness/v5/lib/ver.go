package lib

// Ver is the version of the library under test.
const Ver = 5
