package suite

import (
	_ "verifh/mskm"
)
