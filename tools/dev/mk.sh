mk () 
{ 
    cat > $1/meta.json <<E
{"property": "$2", "needs": "$3", "what_it_breaks": "$4"}
E

    cat > $1/demo.sh <<'E'
#!/bin/bash
# exit 0 when the property holds, nonzero otherwise
exec /opt/venv/bin/python -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"
E

}
