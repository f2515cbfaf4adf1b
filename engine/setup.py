"""Build the extractor (a rustc driver) once, offline."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import facts
facts.driver()
print('extractor built')
