import reach
def check(ctx): reach.check(ctx, ('state',))
