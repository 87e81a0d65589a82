#!/usr/bin/env python3-vt
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'vcg'))
import ctx
sys.exit(ctx.main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else None))
