# target: ocelot/transformations/locations/markets.py
def _subtracted(exc):
    return exc['production volume'].get("subtracted activity link volume", 0)


def _original_pv(exc):
    pv = exc['production volume']
    return pv['original amount'] if 'original amount' in pv else pv['amount']


def _sort_groups(groups):
    ordered = {loc: i for i, loc in enumerate(topology.ordered_dependencies(groups))}
    groups.sort(key=lambda x: ordered[x['location']], reverse=True)


def update_market_production_volumes(data, kind="market activity"):
    is_group = kind == 'market group'
    datasets = [o for o in data if o['type'] == kind]
    if is_group:
        _sort_groups(datasets)

    for ds in datasets:
        rp = get_single_reference_product(ds)
        rp_pv = rp['production volume']
        total_pv = sum(_original_pv(o) for o in ds['suppliers'])
        rp_pv['original total'] = total_pv
        market_links = rp_pv.get('subtracted activity link volume', 0)
        input_links = sum(_subtracted(s) for s in ds['suppliers'])
        gross = sum(s['production volume']['amount'] for s in ds['suppliers'])
        pv = max(gross - market_links, 0)
        rp_pv['amount'] = pv

        if is_group:
            for other in datasets:
                if other != ds:
                    for supplier in other['suppliers']:
                        if supplier['code'] == ds['code']:
                            supplier['production volume'] = {'amount': pv}

        logger.info({
            'type': 'table element',
            'data': (ds['name'], rp['name'], ds['location'],
                     total_pv, input_links, market_links, pv)
        })
    return data
update_market_production_volumes.__table__ = {
    'title': 'Update market production volumes while subtracting hard links',
    'columns': ["Name", "Product", "Location", "Original", "Input subtractions", "Market subtractions", "Net"]
}


def delete_suppliers_list(data):
    for ds in data:
        ds.pop('suppliers', None)
    return data


CONFIDENTIAL_NAMES = (
    "anthraquinone production",
    "burnt shale production",
    "carboxymethyl cellulose production, powder",
    "citric acid production",
    "esters of versatic acid production",
    "feldspar production",
    "latex production",
    "layered sodium silicate production, SKS-6, powder",
    "particle board production, cement bonded",
    "polycarboxylates production, 40% active substance",
    "sodium perborate production, monohydrate, powder",
    "sodium perborate production, tetrahydrate, powder",
    "sodium percarbonate production, powder",
    "wood wool boards production, cement bonded",
    "zeolite production, powder",
    "zeolite production, slurry, without water, in 50% solution state",
)


def assign_fake_pv_to_confidential_datasets(data):
    for ds in data:
        if ds['type'] != 'transforming activity' or ds['name'] not in CONFIDENTIAL_NAMES:
            continue
        rp = get_single_reference_product(ds)
        logger.info({
            'type': 'table element',
            'data': (ds['name'], rp['name'], 1)
        })
        rp['production volume']['amount'] = 1
    return data
assign_fake_pv_to_confidential_datasets.__table__ = {
    'title': 'Split inputs from confidential datasets equally because no production volume is available.',
    'columns': ["Name", "Product", "Production volume"]
}


def delete_global_with_zero_pv_when_regional_present(data, kind="market activity"):
    purge = []
    grouped = toolz.groupby("reference product", [x for x in data if x['type'] == kind])
    for rp, group in grouped.items():
        if len(group) <= 1:
            continue
        rows = [ds for ds in group if ds['location'] == 'RoW']
        if not rows:
            continue
        row = rows[0]
        try:
            pv = original_production_volume(row)
        except AssertionError:
            continue
        if pv:
            continue
        purge.append(row)
        logger.info({
            'type': 'table element',
            'data': (row['name'], rp, row['location'])
        })
    return [ds for ds in data if ds not in purge]
delete_global_with_zero_pv_when_regional_present.__table__ = {
    'title': 'Delete global activities with zero production volumes when regional activities are present',
    'columns': ["Name", "Product", "Location"]
}
