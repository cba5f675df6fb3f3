import sys
from zkmon.core import main

sys.exit(main())
