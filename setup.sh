#!/bin/bash
# Nothing is prebuilt: every check compiles its explorers from /repo's current tree. Check the tools.
set -e
for t in gcc cmake ninja python3; do command -v $t > /dev/null || { echo "missing $t"; exit 1; }; done
echo 'int main(void){return 0;}' > /tmp/eccv_t.c && gcc -fsanitize=address,undefined /tmp/eccv_t.c -o /tmp/eccv_t && /tmp/eccv_t && unlink /tmp/eccv_t && unlink /tmp/eccv_t.c
echo ok
