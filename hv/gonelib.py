"""module of generated classes which a check may make unavailable as a whole"""
