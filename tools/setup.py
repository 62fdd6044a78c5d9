import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *
import codec_check, builder_check, topics_check, broker_check, deadlines_check, impl_check, life_check
build()
codec_check.cases()
builder_check.calls()
topics_check.stimuli()
broker_check.stimuli()
deadlines_check.stimuli()
impl_check.explore()
life_check.scripts()
