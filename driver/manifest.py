"""writes MANIFEST.json from props.py and the not-applicable list"""
import json,os,sys
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__))); import props
checks=[]
for p,P in sorted(props.PROPS.items()):
    checks.append(dict(property=p,quick_cmd='python3 driver/check.py '+p,thorough_cmd='python3 driver/check.py '+p,technique=P.technique,level=P.level,level_note=P.note))
na=[dict(property=p,reason=r) for p,r in sorted(props.NOT_APPLICABLE.items()) if p not in props.PROPS]
M=dict(version=1,setup_cmd='python3 driver/build.py plain && python3 driver/build.py tsan',hooks=dict(guard='DSIM (no hook in /repo is needed: every seam is interposed at link time)',enable='driver/build.py compiles /repo/core/src unchanged and links it against the simulator',source_commits=[]),checks=checks,not_applicable=na)
json.dump(M,open(os.path.join(props.VERIF,'MANIFEST.json'),'w'),indent=1)
