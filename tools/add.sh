#!/bin/bash
# register the module of a new property: tools/add.sh 16
for k in "$@"; do sed -i "s/^mod engine;/mod c$k;\nmod engine;/; s/^        _ => return None,/        \"C$k\" => c$k::property(t),\n        _ => return None,/" /verif/mc/src/main.rs; done
