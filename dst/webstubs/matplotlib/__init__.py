"""Placeholder: no plots of metadata are made."""


def use(backend):
	pass
