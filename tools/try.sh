KTRY="$1" /tmp/kc -property TRY -tier quick -repo /repo -verif /verif -noevidence 2>&1 | grep -v "^OK" | cut -c1-${2:-300}
