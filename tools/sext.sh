bash /tmp/ext.sh /verif/spec /tmp/sfacts /tmp/st
