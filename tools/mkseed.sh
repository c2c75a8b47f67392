mkseed () 
{ 
    id=$1;
    prop=$2;
    needs=$3;
    breaks=$4;
    mkdir -p seeded/$id;
    cat > seeded/$id/demo.sh <<'E'
#!/bin/bash
# builds demo.rs against the built crate and runs it in a scratch directory
d=$(cd "$(dirname "$0")" && pwd); export PATH=$PATH:/root/.cargo/bin
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
deps=$PWD/target/debug/deps
lib=$(ls -t "$deps"/libtemplito-*.rlib | head -1)
rustc --edition 2021 -A warnings -o "$t/demo" "$d/demo.rs" --extern templito="$lib" -L dependency="$deps" || exit 3
cd "$t" && timeout 100 ./demo
E

    python3 - "$id" "$prop" "$needs" "$breaks" <<'E'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(f'/verif/seeded/{sys.argv[1]}/meta.json','w'),indent=1)
E

}
