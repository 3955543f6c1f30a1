import json,sys
r=json.load(open(sys.argv[1])); print(r['harness'],r['id'],r.get('where'),r.get('msg')); print(' '.join('%s=%s'%(i['name'],i['val']) for i in r['inputs']))
