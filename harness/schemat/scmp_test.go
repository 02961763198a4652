package schemat

import "verif/scmp"

var (
	fold       = scmp.Fold
	sortedCols = scmp.SortedCols
	sameTables = scmp.SameTables
	sameFKs    = scmp.SameFKs
	filters    = scmp.Filters
	closure    = scmp.Closure
	refsOf     = scmp.RefsOf
	tableText  = scmp.TableText
	maxLen     = scmp.MaxLen
	recase     = scmp.Recase
	asFK       = scmp.AsFK
)
