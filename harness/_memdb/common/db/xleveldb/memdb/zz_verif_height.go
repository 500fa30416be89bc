package memdb

// VerifHeight replaces the random height of a skip-list node: heights 1, 2, 1, 3, ...
func VerifHeight(p *DB) int {
	switch p.n % 4 {
	case 1:
		return 2
	case 3:
		return 3
	}
	return 1
}
