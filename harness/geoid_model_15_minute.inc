/* A grid of arbitrary heights in the place of the table, with the cells of the table in the build (1 degree) or coarser ones. */
#ifndef CELL
#define CELL 1
#endif
static const float LAT_GRID_SPACING_DEG = CELL;
static const float LON_GRID_SPACING_DEG = CELL;
extern float GEOID[360 / CELL + 1][180 / CELL + 1];
