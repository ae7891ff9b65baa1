import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ebuild
import fol

ebuild.build("rel", False)
ebuild.build("rel", True)
fol._satlib()
print("setup done")
