package quota

import (
	"math/big"

	"github.com/vitelabs/go-vite/v2/common/types"
)

// VerifSetQuota fixes the quota every block is granted: total including the addition bought with work.
func VerifSetQuota(total, addition uint64) {
	quotaConfig.calcQuotaFunc = func(db quotaDb, addr types.Address, stakeAmount *big.Int, difficulty *big.Int, sbHeight uint64) (uint64, uint64, uint64, uint64, uint64, bool, uint64, error) {
		return total, total - addition, addition, total, 0, false, 0, nil
	}
}
