mk () 
{ 
    id=$1;
    prop=$2;
    needs=$3;
    breaks=$4;
    d=/verif/seeded/$id;
    mkdir -p $d;
    git diff > $d/patch.diff;
    git checkout -q -- .;
    cp /verif/tools/demo.sh $d/demo.sh;
    python3 - "$d" "$prop" "$needs" "$breaks" <<'E'
import json,sys
json.dump(dict(property=sys.argv[2],needs=sys.argv[3],what_it_breaks=sys.argv[4]),open(sys.argv[1]+"/meta.json","w"),indent=1)
E

}
