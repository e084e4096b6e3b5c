ANY = object()

