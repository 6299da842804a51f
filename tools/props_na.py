# NA.append(({'id': ..., 'title': ..., ...}, reason))
