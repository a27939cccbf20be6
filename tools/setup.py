import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import rx
rx.build()
rx.build_bevy()
