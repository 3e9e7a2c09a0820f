/* Reads everything an object publishes; compiled as C (adapter.c) and as C++ (bx.cpp). */
ad_snap *SNAPSHOT(void *o, int64_t distlimit) {
	hdbscan *s = (hdbscan *)o;
	ad_snap *r = xalloc(sizeof *r);
	int64_t n = r->n = s->numPoints;
	r->minPoints = s->minPoints;
	if (s->distanceFunction.coreDistances) {
		r->core = xalloc(sizeof(double) * n);
		for (int64_t i = 0; i < n; i++) r->core[i] = s->distanceFunction.coreDistances[i];
	}
	if (s->distanceFunction.distances && n <= distlimit) {
		r->dist = xalloc(sizeof(double) * n * n);
		for (int64_t i = 0; i < n; i++) for (int64_t j = 0; j < n; j++)
			r->dist[i * n + j] = distance_get(&s->distanceFunction, (index_t)i, (index_t)j);
	}
	if (s->mst) {
		UndirectedGraph *g = s->mst;
		r->nA = (int64_t)g->verticesA->size; r->nB = (int64_t)g->verticesB->size; r->nW = (int64_t)g->edgeWeights->size;
		r->ea = xalloc(8 * r->nA); r->eb = xalloc(8 * r->nB); r->ew = xalloc(8 * r->nW);
		for (int64_t i = 0; i < r->nA; i++) r->ea[i] = (int64_t)((index_t *)g->verticesA->data)[i];
		for (int64_t i = 0; i < r->nB; i++) r->eb[i] = (int64_t)((index_t *)g->verticesB->data)[i];
		for (int64_t i = 0; i < r->nW; i++) r->ew[i] = ((distance_t *)g->edgeWeights->data)[i];
	}
	if (s->clusters) {
		r->nclusters = (int64_t)s->clusters->size;
		r->clusters = xalloc(sizeof(ad_cluster) * r->nclusters);
		for (int64_t i = 0; i < r->nclusters; i++) {
			cluster *c = ((cluster **)s->clusters->data)[i];
			ad_cluster *k = r->clusters + i;
			if (!c) continue;
			k->present = 1; k->label = (int64_t)c->label; k->parent = c->parent ? (int64_t)c->parent->label : -1;
			k->birth = c->birthLevel; k->death = c->deathLevel; k->numPoints = (int64_t)c->numPoints; k->offset = c->offset;
			k->stability = c->stability; k->pstability = c->propagatedStability; k->pdeath = c->propagatedLowestChildDeathLevel;
			k->constraints = (int64_t)c->numConstraintsSatisfied; k->pconstraints = (int64_t)c->propagatedNumConstraintsSatisfied;
			k->hasChildren = c->hasChildren != 0;
			k->nvirtual = -1;
			if (c->virtualChildCluster) {
				k->nvirtual = (int64_t)set_size(c->virtualChildCluster);
				k->virt = xalloc(8 * k->nvirtual);
				for (int64_t j = 0; j < k->nvirtual; j++) k->virt[j] = (int64_t)((index_t *)c->virtualChildCluster->data)[j];
				k->vhas = -1;
				if (n * r->nclusters <= 400000) { /* the set as its membership query shows it */
					k->vhas = 0; k->vmiss = -1;
					for (int64_t j = 0; j < n; j++) k->vhas += cluster_virtual_child_contains_point(c, (index_t)j) != 0;
					for (int64_t j = 0; j < k->nvirtual; j++) if (!cluster_virtual_child_contains_point(c, (index_t)k->virt[j])) k->vmiss = k->virt[j];
				}
			}
			if (c->propagatedDescendants) {
				k->ndesc = (int64_t)c->propagatedDescendants->size;
				k->desc = xalloc(8 * k->ndesc);
				for (int64_t j = 0; j < k->ndesc; j++) {
					cluster *d = ((cluster **)c->propagatedDescendants->data)[j];
					k->desc[j] = d ? (int64_t)d->label : -1;
				}
			}
		}
	}
	if (s->hierarchy) {
		r->nlines = (int64_t)set_size(s->hierarchy->keys);
		r->lineKey = xalloc(8 * r->nlines); r->lineWeight = xalloc(8 * r->nlines); r->lineLabels = xalloc(sizeof(void *) * r->nlines);
		for (int64_t i = 0; i < r->nlines; i++) {
			int64_t key = 0; hierarchy_entry *e = NULL;
			set_value_at(s->hierarchy->keys, (size_t)i, &key);
			r->lineKey[i] = key;
			if (hashtable_lookup(s->hierarchy, &key, &e) && e) {
				r->lineWeight[i] = e->edgeWeight;
				r->lineLabels[i] = xalloc(8 * n);
				for (int64_t j = 0; j < n; j++) r->lineLabels[i][j] = (int64_t)e->labels[j];
			}
		}
	}
	if (s->clusterLabels) {
		r->hasLabels = 1; r->labels = xalloc(8 * n);
		for (int64_t i = 0; i < n; i++) r->labels[i] = (int64_t)s->clusterLabels[i];
	}
	if (s->outlierScores) {
		r->hasScores = 1; r->score = xalloc(8 * n); r->scoreCore = xalloc(8 * n); r->scoreId = xalloc(8 * n);
		for (int64_t i = 0; i < n; i++) {
			r->score[i] = s->outlierScores[i].score; r->scoreCore[i] = s->outlierScores[i].coreDistance;
			r->scoreId[i] = (int64_t)s->outlierScores[i].id;
		}
	}
	return r;
}
