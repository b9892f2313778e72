meta () 
{ 
    python3 - "$@" <<'E'
import sys,json
json.dump({'property':sys.argv[2],'needs':sys.argv[3],'what_it_breaks':sys.argv[4]},open((__import__('os').environ.get('SD','/verif/seeded'))+'/%s/meta.json'%sys.argv[1],'w'),indent=1)
E

}
