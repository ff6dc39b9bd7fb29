package main

import "regexp"

type regexpT = regexp.Regexp
