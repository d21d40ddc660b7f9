"""C17 Event and station metadata are mapped to the right headers"""
from obspy.core import AttribDict
from rf import rfstats
from rf.rfstream import obj2stats
from symrf.runner import Case
from checks.util import event

EV = ('event_latitude', 'event_longitude', 'event_depth', 'event_time',
      'event_magnitude', 'event_id')
STA = ('station_latitude', 'station_longitude', 'station_elevation')


def origin(ctx, name='', missing=()):
    o = {'latitude': ctx.real('lat' + name, -90, 90),
         'longitude': ctx.real('lon' + name, -180, 180),
         'depth': ctx.real('depth' + name, -5000, 700000),
         'time': ctx.utc(ctx.real('time' + name, -1000, 1000))}
    for m in missing:
        o[m] = None
    return o


def station(ctx, kind):
    d = {'latitude': ctx.real('slat', -90, 90),
         'longitude': ctx.real('slon', -180, 180),
         'elevation': ctx.real('sele', -1000, 8000)}
    if kind == 'more':
        d['local_depth'] = 5.
        d['depth'] = 7.
    return AttribDict(d) if kind == 'attribdict' else d


def check_event(ctx, stats, o, mag, evid):
    ctx.eq('latitude', stats['event_latitude'], o['latitude'])
    ctx.eq('longitude', stats['event_longitude'], o['longitude'])
    ctx.eq('depth in km', stats['event_depth'], o['depth'] / 1000)
    ctx.equal('time', stats['event_time'], o['time'])
    ctx.eq('magnitude', stats['event_magnitude'], mag)
    ctx.same('id', stats['event_id'], evid)


def check_station(ctx, stats, sta):
    for k in ('latitude', 'longitude', 'elevation'):
        ctx.eq('station ' + k, stats['station_' + k], sta[k])


def absent(ctx, stats, keys):
    for k in keys:
        ctx.true('no ' + k, k not in stats)


def mapping(ctx):
    """all forms of events and stations"""
    pref = ctx.choice('preferred', ['none', 'preferred'])
    other = ctx.boolean('several origins')
    sta_kind = ctx.choice('station', [None, 'dict', 'attribdict', 'more'])
    has_event = ctx.boolean('event')
    evid = ctx.choice('id', ['smi:local/event/1', ''])
    zero = ctx.choice('zero', [None, 'latitude', 'longitude', 'depth',
                               'magnitude'])
    ev = None
    if has_event:
        o = origin(ctx)
        mag = ctx.real('mag', -1, 9)
        # depth in metres etc. may be exactly zero
        if zero == 'magnitude':
            mag = 0.
        elif zero is not None:
            o[zero] = 0.
        ot = {'origin': origin(ctx, '_other'),
              'magnitude': {'mag': ctx.real('mag_other', -1, 9)}}
        ev = event(ctx, o, {'mag': mag}, evid, pref, ot if other else None)
    else:
        ctx.assume(pref == 'none' and not other and evid and zero is None)
    sta = None if sta_kind is None else station(ctx, sta_kind)
    stats = obj2stats(event=ev, station=sta)
    if has_event:
        check_event(ctx, stats, o, mag, evid or None)
    else:
        absent(ctx, stats, EV)
    if sta is None:
        absent(ctx, stats, STA)
    else:
        check_station(ctx, stats, sta)
    ctx.same('headers', sorted(stats), sorted(
        (EV if has_event else ()) + (STA if sta else ())))


def refused(ctx):
    """missing values are refused with the name of the value"""
    what = ctx.choice('missing', ['origin', 'magnitude', 'latitude',
                                  'longitude', 'depth', 'time',
                                  'everything'])
    pref = ctx.choice('preferred', ['none', 'preferred'])
    via = ctx.choice('via', ['obj2stats', 'obj2stats station', 'rfstats'])
    zeros = ctx.boolean('other values are zero')
    other = ctx.boolean('other origin')
    if other:
        # values of other origins do not replace missing values
        ctx.assume(pref == 'preferred' and
                   what not in ('origin', 'magnitude', 'everything'))
    o = origin(ctx, missing=(what,))
    if zeros:
        for k in ('latitude', 'longitude', 'depth'):
            if o[k] is not None:
                o[k] = 0.
    ev = event(ctx, None if what in ('origin', 'everything') else o,
               None if what in ('magnitude', 'everything') else {'mag': ctx.real('m', 0, 9)},
               preferred=pref, other={
                   'origin': origin(ctx, '_other'),
                   'magnitude': {'mag': 3.}} if other else None)
    sta = station(ctx, 'dict')
    if what == 'everything':
        what = 'origin'
    text = None
    try:
        if via == 'obj2stats':
            obj2stats(event=ev)
        elif via == 'obj2stats station':
            obj2stats(event=ev, station=sta)
        else:
            rfstats(event=ev, station=sta)
    except ValueError as ex:
        text = str(ex)
    ctx.true('refused', text is not None)
    if text is not None:
        ctx.true('%s is named' % what, what in text.lower())


def two_events(ctx):
    """events do not influence each other"""
    o = [origin(ctx, str(i)) for i in range(2)]
    mag = [ctx.real('mag%d' % i, -1, 9) for i in range(2)]
    pref = [ctx.choice('preferred%d' % i, ['none', 'preferred'])
            for i in range(2)]
    evs = [event(ctx, o[i], {'mag': mag[i]}, 'smi:local/ev%d' % i, pref[i])
           for i in range(2)]
    sta = station(ctx, 'dict')
    snap = dict(sta)
    stats = [obj2stats(event=evs[i], station=sta if i else None)
             for i in range(2)]
    stats.append(obj2stats(event=evs[0], station=sta))
    for i, s in zip((0, 1, 0), stats):
        check_event(ctx, s, o[i], mag[i], 'smi:local/ev%d' % i)
    absent(ctx, stats[0], STA)
    ctx.same('station', sorted(sta), sorted(snap))
    check_station(ctx, stats[1], snap)
    check_station(ctx, stats[2], snap)
    for i in range(2):
        ctx.eq('event is not changed', evs[i].origins[0].depth, o[i]['depth'])


ASSUMPTIONS = [
    'objects of obspy hold any real number']


def cases(tier):
    return [
        Case('mapping', mapping, 'any values including zero, origins and '
             'magnitudes preferred or not, with and without other ones',
             paths=20000),
        Case('refused', refused, 'one missing part', paths=20000),
        Case('two events', two_events, 'two events', paths=20000)]
