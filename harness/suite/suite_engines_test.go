package suite

import (
	_ "verifh/comp"
	_ "verifh/e2e"
	_ "verifh/rebal"
)
