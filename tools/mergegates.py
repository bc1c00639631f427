"""merge /tmp/gates_*.json into bounded/gates_table.json"""
import glob, json
json.dump([json.load(open(p)) for p in sorted(glob.glob('/tmp/gates_*.json'))], open('/verif/bounded/gates_table.json', 'w'), indent=0)
