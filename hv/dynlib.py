"""module the generated classes live in (so that pickle finds them)"""
