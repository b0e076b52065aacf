c=$1; shift
PYVER_DEBUG=1 timeout 900 python3-vt tools/show.py $c "$@" > /tmp/va.out 2>&1
grep -v "status': 'discharged'" /tmp/va.out | grep -v '^    \|^  File' | cut -c1-${W:-330} | sed -E "s/'contracts.*wall_s/ wall_s/" | tail -60
echo "discharged: $(grep -c "status': 'discharged'" /tmp/va.out)"; grep "^    .*'status'" /tmp/va.out | grep -v discharged | cut -c1-${W:-330}
