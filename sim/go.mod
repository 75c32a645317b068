module gtfsverif

go 1.18
